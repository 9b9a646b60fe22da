"""Shared pieces of the simulated worlds."""

import collections
import os
import zlib

import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from jax.sharding import PartitionSpec as P

from dst import core
from dst import simfs
from dst import simhosts
from t5x import checkpoint_utils
from t5x import checkpoints
from t5x import checkpoints_utils
from t5x import optimizers
from t5x import partitioning
from t5x import train_state as train_state_lib
import flax
import gin
import tensorflow as tf

REAL_OPEN = simfs._real.get('open', open)


PREFIXES = ['checkpoint', 'checkpoint', 'ckpt']
ODD_PREFIXES = ['checkpoint', 'checkpoint', 'model+ema']
DIRS = ['model', 'model', 'my model']
# Names that the libraries of TensorFlow and Orbax do not support.
ODD_DIRS = ['model', 'my model', 'lr=[0.1,0.2]*']
_PREFIX = ['checkpoint']


def use_prefix(prefix):
  """The configured start of the names of checkpoints."""
  _PREFIX[0] = prefix
  with gin.unlock_config():
    gin.bind_parameter('get_checkpoint_prefix.prefix', prefix)


def draw_place(ch, odd=False):
  """Names of checkpoints and of directories."""
  return {'prefix': ch.pick(ODD_PREFIXES if odd else PREFIXES, 'prefix'),
          'dirname': ch.pick(ODD_DIRS if odd else DIRS, 'dirname')}


def ckpt_name(step):
  return f'{_PREFIX[0]}_{step}'


def ckpt_step(name):
  """The step of a checkpoint of this name, None if it is none."""
  n = len(_PREFIX[0]) + 1
  if name.startswith(_PREFIX[0] + '_') and name[n:].isdigit():
    return int(name[n:])
  return None


def in_ckpt(path):
  return f'/{_PREFIX[0]}_' in path


def rnd(*key):
  """A generator that depends only on the key."""
  return np.random.Generator(np.random.PCG64(
      zlib.crc32(repr(key).encode()) + 7919 * len(key)))


def arr(shape, dtype, *key):
  a = rnd(*key).standard_normal(shape).astype(np.float32)
  return np.asarray(a, dtype=dtype)


class FakeDevice:

  def __init__(self, i, process_index):
    self.id = i
    self.process_index = process_index

  def __repr__(self):
    return f'dev{self.id}@{self.process_index}'


class FakeMesh:
  """The parts of jax.sharding.Mesh that LocalChunker reads."""

  def __init__(self, devices, axis_names, me):
    self.devices = devices
    self.axis_names = tuple(axis_names)
    self.me = me

  @property
  def shape(self):
    return collections.OrderedDict(zip(self.axis_names, self.devices.shape))

  @property
  def local_mesh(self):
    mask = np.vectorize(lambda d: d.process_index == self.me)(self.devices)
    idx = np.nonzero(mask)
    sl = tuple(slice(i.min(), i.max() + 1) for i in idx)
    return FakeMesh(self.devices[sl], self.axis_names, self.me)


def fake_mesh(data, model, hosts_data, hosts_model, me,
              names=('data', 'model'), interleave=False):
  """data x model devices tiled by hosts_data x hosts_model hosts.

  Hosts are numbered along the model axis first, or, interleaved, along the
  data axis first.
  """
  devs = np.empty((data, model), dtype=object)
  for i in range(data):
    for j in range(model):
      a, b = i // (data // hosts_data), j // (model // hosts_model)
      h = b * hosts_data + a if interleave else a * hosts_model + b
      devs[i, j] = FakeDevice(i * model + j, h)
  return FakeMesh(devs, names, me)


_ONE_MESH = []


def one_mesh():
  if not _ONE_MESH:
    _ONE_MESH.append(jax.sharding.Mesh(
        np.array(jax.devices()[:1]).reshape(1, 1), ('data', 'model')))
  return _ONE_MESH[0]


_FOUR_MESH = []


def four_mesh():
  if not _FOUR_MESH:
    _FOUR_MESH.append(jax.sharding.Mesh(
        np.array(jax.devices()[:4]).reshape(2, 2), ('data', 'model')))
  return _FOUR_MESH[0]


class SimPartitioner(partitioning.BasePartitioner):
  """One host's partitioner of a simulated multi-host job.

  Data layout and chunk arithmetic are t5x's own LocalChunker and
  get_data_layout over a simulated global mesh; arrays are restored onto one
  real CPU device.
  """

  def __init__(self, gmesh, axes, on_devices=True, real_mesh=None):
    super().__init__(num_partitions=1, params_on_devices=on_devices)
    self._real_mesh = real_mesh
    self._gmesh = gmesh
    self._axes = axes
    self._chunker = partitioning.LocalChunker(gmesh)

  @property
  def _local_chunker(self):
    return self._chunker

  @property
  def mesh(self):
    return self._real_mesh or one_mesh()

  @property
  def data_mesh_size(self):
    return self._gmesh.shape['data']

  def get_mesh_axes(self, train_state):
    return train_state.restore_state(self._axes)

  def partition(self, fn, in_axis_resources, out_axis_resources,
                static_argnums=(), donate_argnums=()):
    return fn

  def compile(self, partitioned_fn, *args):
    return partitioned_fn


class PlainDef(optimizers.OptimizerDef):
  """An optimizer definition that only carries state."""

  def __init__(self):
    super().__init__({})

  def derive_logical_axes(self, optimizer, param_logical_axes):
    return optimizer


LEAVES = {
    # section, name -> shape
    'w': (12, 6),
    'b': (12,),
    'emb': (24, 2),
    's': (),
}


def state_of(cfg, step, salt):
  """A train state whose every value depends on (step, salt)."""
  target = {}
  ps = {}
  for n in cfg['leaves']:
    shape = LEAVES[n]
    target[n] = arr(shape, cfg['dtype'], 't', n, step, salt)
    if cfg['moments']:
      ps[n] = {'m': arr(shape, np.float32, 'm', n, step, salt),
               'v': arr((), np.float32, 'v', n, step, salt)}
  opt = optimizers.Optimizer(
      PlainDef(),
      optimizers.OptimizerState(np.asarray(step, np.int32), ps),
      {'p': target})
  mut = flax.core.FrozenDict({})
  if cfg['mutables']:
    mut = flax.core.freeze({'stats': {
        'n': arr((12,), np.float32, 'mut', step, salt)}})
  return train_state_lib.FlaxOptimTrainState(opt, flax_mutables=mut)


def axes_of(cfg, state):
  """PartitionSpecs: which leaves go to TensorStore, which to msgpack."""
  def ax(path, x):
    x = np.asarray(x)
    if x.ndim == 0 or '/'.join(path) in cfg['unpart']:
      return None
    return P(*([cfg['axis0']] + [None] * (x.ndim - 1)))
  flat = flax.traverse_util.flatten_dict(state.state_dict(),
                                         keep_empty_nodes=True)
  return flax.traverse_util.unflatten_dict({
      k: (v if v is flax.traverse_util.empty_node else ax(k, v))
      for k, v in flat.items()})


def flat_np(tree):
  """{path: ndarray} of a state dict; realises lazy arrays."""
  out = {}
  for k, v in flax.traverse_util.flatten_dict(
      flax.core.unfreeze(tree), keep_empty_nodes=True, sep='/').items():
    if v is flax.traverse_util.empty_node or v is None:
      continue
    if hasattr(v, 'get') and not isinstance(v, dict):
      v = v.get()
    out[k] = np.asarray(v)
  return out


def on_disk(cfg, state):
  """What a checkpoint of `state` must contain: only the target is cast."""
  out = {}
  for k, v in flat_np(state.state_dict()).items():
    if k.startswith('target/') and cfg['save_dtype'] is not None:
      v = v.astype(cfg['save_dtype'])
    out[k] = v
  return out


def differs(got, want):
  """None if equal bit for bit, else a description."""
  if sorted(got) != sorted(want):
    odd = sorted(set(got) ^ set(want))
    return f'keys differ: { {k: repr(got.get(k))[:60] for k in odd} }'
  for k in sorted(want):
    a, b = np.asarray(got[k]), np.asarray(want[k])
    if a.shape != b.shape:
      return f'{k}: shape {a.shape} != {b.shape}'
    if a.dtype != b.dtype:
      return f'{k}: dtype {a.dtype} != {b.dtype}'
    if a.tobytes() != b.tobytes():
      return f'{k}: value differs'
  return None


class SimIter:
  """A dataset iterator with its own saved position (clu-like interface)."""

  def __init__(self, shard):
    self.shard = shard
    self.pos = 0

  def __iter__(self):
    return self

  def __next__(self):
    self.pos += 1
    return (self.shard, self.pos)

  def save(self, filename):
    with tf.io.gfile.GFile(os.fspath(filename), 'w') as f:
      f.write(f'{self.shard}:{self.pos}\n')

  def restore(self, filename):
    with tf.io.gfile.GFile(os.fspath(filename), 'r') as f:
      shard, pos = f.read().strip().split(':')
    assert int(shard) == self.shard, (shard, self.shard)
    self.pos = int(pos)

  load = restore


def listing(d):
  """All files below d with their sizes (outside the simulation)."""
  out = {}
  for base, _, files in os.walk(d):
    for f in files:
      p = os.path.join(base, f)
      out[os.path.relpath(p, d)] = os.path.getsize(p)
  return out


REAL_CKPT = [
    't5x.checkpoints.Checkpointer and its module (save, restore, retention)',
    't5x.checkpoint_utils', 't5x.partitioning (LocalChunker, data layout)',
    't5x.train_state', 'flax serialization and msgpack',
    'TensorStore file and zarr drivers (real files in a scratch directory)',
    'tf.io.gfile call sites', 'asyncio event loops and worker threads of t5x',
]
STUBS_HOST = [
    'multihost collectives: simulated barrier and broadcast per host group',
    'operating system file calls: executed for real below a scratch '
    'directory, with a scheduling point, crash, error or torn effect at each',
    'tf.io.gfile: routed through the same file calls',
    'clocks, sleeps, threads, locks, queues: simulated, seeded scheduler',
    'hosts: one process, a simulated mesh and process index per host',
    'dataset iterator: a position counter with save and load',
]
ASSUMES_FS = [
    'rename and mkdir are atomic and durable when they return',
    'an acknowledged TensorStore commit and a closed file are durable; '
    'unacknowledged ones may be kept, lost or torn by a crash',
    'on more than one simulated host saved arrays are host numpy arrays or '
    'lazy arrays (a jax.Array spanning several processes cannot exist in one '
    'process); sharded jax.Arrays are exercised on one host with 4 devices',
]
