"""t5x.train.train over simulated hosts: the whole training loop.

The real loop, trainer, metrics threads, checkpointer and input iterators run;
the model is tiny, its steps are the real ones, traced by jax and compiled once
per distinct program. A reference run of the same loop, undisturbed and in one
piece, gives the state that every step must have.
"""

import concurrent.futures
import functools
import gc
import json
import os

import clu.data.dataset_iterator as clu_iter
import clu.metric_writers
import flax
import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf
import tensorstore as ts

from dst import core
from dst import simhosts
from dst.simfs import FaultPlan
from dst.simfs import quiet_options
from dst.simfs import with_nopreempt
from props import common as c
from props import world_infer as wi
from t5x import checkpoints
from t5x import metrics as metrics_lib
from t5x import models
from t5x import optimizers
from t5x import partitioning
from t5x import train as train_lib
from t5x import trainer as trainer_lib
from t5x import utils
from jax.sharding import PartitionSpec as P

FEATURES = 2
BATCH = 4
SPAN = 14  # steps of a reference run


# ------------------------------------------------------------------ the model


class Model(models.BaseModel):
  FEATURE_CONVERTER_CLS = wi.Converter

  def __init__(self, mutables):
    super().__init__(optimizers.adam(0.05))
    self.mutables = mutables

  def get_initial_variables(self, rng, input_shapes, input_types=None,
                            flax_mutables=None):
    del input_shapes, input_types, flax_mutables
    v = {'params': {'w': jax.random.normal(rng, (FEATURES, 3)),
                    'b': jnp.zeros((3,))}}
    if self.mutables:
      v['stats'] = {'n': jnp.zeros((3,))}
    return v

  def loss_fn(self, params, batch, dropout_rng, flax_mutables=None):
    y = batch['x'] @ params['w'] + params['b']
    noise = jnp.zeros((3,))
    if dropout_rng is not None:
      noise = jax.random.normal(dropout_rng, (3,))
      y = y + 0.1 * noise
    if flax_mutables:
      y = y + 0.01 * flax_mutables['stats']['n']
    loss = jnp.mean((y - 1.0) ** 2)
    n = batch['x'].shape[0]
    m = {
        'loss': metrics_lib.AveragePerStep.from_model_output(loss),
        'noise': metrics_lib.Sum.from_model_output(noise[0]),
        'noise2': metrics_lib.Sum.from_model_output(noise[0] ** 2),
        'rows': metrics_lib.Sum.from_model_output(jnp.ones((n,))),
        'rows_per_second': metrics_lib.TimeRate.from_model_output(
            numerator=float(n)),
        'steps_per_second': metrics_lib.StepsPerTime.from_model_output(),
        'seconds': metrics_lib.Time(),
    }
    if flax_mutables:
      return loss, (m, flax.core.freeze(
          {'stats': {'n': flax_mutables['stats']['n'] + y.mean(0)}}))
    return loss, m

  def eval_fn(self, params, batch, flax_mutables=None):
    loss, aux = self.loss_fn(params, batch, None, flax_mutables)
    return loss, aux[0] if flax_mutables else aux

  def predict_batch(self, params, batch, rng=None):
    w = np.asarray(params['w'], np.float32).ravel()
    x = np.asarray(batch['x'])
    return np.stack([np.concatenate([r[:1], w]) for r in x])

  predict_batch_with_aux = predict_batch
  score_batch = predict_batch


# ------------------------------------------------------------ compiled steps

_COMPILED = {}


class Step:
  """A partitioned function: gathers the hosts' batches, runs the program."""

  def __init__(self, part, fn, donate):
    self.part, self.fn, self.donate = part, fn, donate
    self.traced = {}

  def __call__(self, *args, **kw):
    t = core.current()
    world = self.part.world
    if len(args) == 5:  # inference: plain numpy
      return self.part.infer_step(self.fn)(*args, **kw)
    if len(args) == 2:
      world.fed(t.host, args[0], args[1], self.donate)
      if self.donate:
        world.s.sleep(world.step_time)
      if t.host.group is not None and t.host.group.n > 1:
        args = (args[0], self.part.gather(args[1]))
    out = with_nopreempt(t, lambda: self.run(*args))
    if len(args) == 2 and self.donate:
      world.stepped(t.host, out[0])
    elif len(args) == 1:
      world.initialised(t.host, out)
    return out

  def run(self, *args):
    flat, tree = jax.tree_util.tree_flatten(args)
    avals = [jax.api_util.shaped_abstractify(x) for x in flat]
    key = (tree, tuple((a.shape, a.dtype, a.weak_type) for a in avals))
    if key not in self.traced:
      closed, shape = jax.make_jaxpr(self.fn, return_shape=True)(*args)
      n = len(jax.tree_util.tree_leaves(args[0])) if self.donate else 0
      ck = (str(closed.jaxpr), key[1], n)
      if ck not in _COMPILED:
        jp = closed.jaxpr
        _COMPILED[ck] = jax.jit(
            lambda consts, *a: jax.core.eval_jaxpr(jp, consts, *a),
            donate_argnums=tuple(range(1, n + 1)))
        MISSES.append(ck)
      self.traced[key] = (_COMPILED[ck], closed.consts,
                          jax.tree_util.tree_structure(shape))
    fn, consts, out = self.traced[key]
    return jax.tree_util.tree_unflatten(out, fn(consts, *flat))


MISSES = []


class TrainPartitioner(wi.InferPartitioner):

  world = None

  @property
  def data_partition_spec(self):
    return P('data')

  def get_mesh_axes(self, train_state):
    ts = self.world.cfg['ts']
    flat = flax.traverse_util.flatten_dict(train_state.state_dict(),
                                           keep_empty_nodes=True)
    e = flax.traverse_util.empty_node
    return train_state.restore_state(flax.traverse_util.unflatten_dict({
        k: v if v is e else (P('data') if ts and len(v.shape) > 1 else None)
        for k, v in flat.items()}))

  def partition(self, fn, in_axis_resources, out_axis_resources,
                static_argnums=(), donate_argnums=()):
    return Step(self, fn, tuple(donate_argnums) == (0,))

  def compile(self, partitioned_fn, *args):
    return partitioned_fn

  def infer_step(self, fn):
    self.batch = BATCH
    return super().partition(fn, None, None)

  def gather(self, batch):
    h = core.current().host
    shard = self.get_data_layout(BATCH).shard_id
    got = h.group.exchange(
        h, 'batch', (shard, jax.tree_util.tree_map(np.asarray, batch)))
    by = {}
    for sh, x in got:
      if sh in by and not identical(by[sh], x):
        h.sim.fail('replicas-differ', f'hosts that feed data shard {sh} '
                   'passed different batches to one step')
      by[sh] = x
    return jax.tree_util.tree_map(lambda *a: np.concatenate(a),
                                  *[by[k] for k in sorted(by)])


def identical(a, b):
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  return len(la) == len(lb) and all(
      x.shape == y.shape and x.tobytes() == y.tobytes()
      for x, y in zip(la, lb))


# ---------------------------------------------------------------- input data


def rows(cfg, pos):
  """The global batch at position pos of the input."""
  if cfg['data'] == 'const':
    pos = 0
  if pos == cfg['nan_at']:
    return np.full((BATCH, FEATURES), np.nan, np.float32)
  return c.arr((BATCH, FEATURES), np.float32, 'batch', cfg['seed'], pos)


class CountIterator(clu_iter.DatasetIterator):
  """Counts its position and saves it."""

  def __init__(self, world, shard, shards):
    self.world, self.shard = world, shard
    self.n = BATCH // shards
    self.pos = 0

  def __next__(self):
    w = self.world
    w.s.yield_point('data')
    if w.data_delay:
      w.s.sleep(w.data_delay)
    if w.preempt_at is not None and self.pos == w.preempt_at:
      w.preempted.add(core.current().host.name)
      w.s.fault('preemption-notice')
      raise trainer_lib.PreemptionError('injected preemption')
    r = rows(w.cfg, self.pos)
    self.pos += 1
    return {'x': r[self.shard * self.n:(self.shard + 1) * self.n]}

  def reset(self):
    self.pos = 0

  @property
  def element_spec(self):
    return {'x': clu_iter.ArraySpec(np.float32, (self.n, FEATURES))}

  def save(self, filename):
    with tf.io.gfile.GFile(os.fspath(filename), 'w') as f:
      f.write(f'{self.shard}:{self.pos}\n')

  def restore(self, filename):
    with tf.io.gfile.GFile(os.fspath(filename), 'r') as f:
      shard, pos = f.read().strip().split(':')
    assert int(shard) == self.shard, (shard, self.shard)
    self.pos = int(pos)


_DATASETS = {}


def tf_dataset(cfg, shard, shards, count=SPAN + 4, offset=0):
  key = (cfg['seed'], cfg['data'], cfg['nan_at'], shard, shards, count, offset)
  if key not in _DATASETS:
    n = BATCH // shards

    def make():
      x = np.stack([rows(cfg, offset + p)[shard * n:(shard + 1) * n]
                    for p in range(count)])
      return tf.data.Dataset.from_tensor_slices({'x': x}).with_options(
          quiet_options())

    _DATASETS[key] = with_nopreempt(core.current(), make)
  return _DATASETS[key]


# ------------------------------------------------------------ metric writers


class Writer(clu.metric_writers.MetricWriter):
  """Records what is written, on the host and in the order it is written."""

  def __init__(self, world, host, name):
    self.world, self.host, self.name = world, host, name
    self.closed = False
    self.busy = 0

  def write_scalars(self, step, scalars):
    self.busy += 1
    try:
      if self.busy > 1:
        self.world.overlapped(self)
      self.world.s.yield_point('metrics')
      self.world.write_fault(self)
      self.world.written(
          self, int(step),
          {k: np.asarray(v).tolist() for k, v in scalars.items()})
    finally:
      self.busy -= 1

  def write_summaries(self, step, values, metadata=None):
    pass

  write_images = write_videos = write_audios = write_texts = write_summaries
  write_histograms = write_hparams = write_pointcloud = write_summaries

  def flush(self):
    pass

  def close(self):
    self.closed = True


class Gc:
  """The garbage collector's switch, per host; collecting is recorded only."""

  def __init__(self, world):
    self.world = world
    self.off = set()

  @staticmethod
  def key():
    t = core.current()
    return t.host.name if t is not None else None

  def isenabled(self):
    return self.key() not in self.off

  def enable(self):
    self.off.discard(self.key())

  def disable(self):
    self.off.add(self.key())

  def collect(self, generation=2):
    t = core.current()
    if t is not None:
      self.world.collected(t.host)
    return 0

  def freeze(self):
    pass

  def install(self):
    names = ('isenabled', 'enable', 'disable', 'collect', 'freeze')
    self.old = {n: getattr(gc, n) for n in names}
    for n in names:
      setattr(gc, n, getattr(self, n))

  def remove(self):
    for n, f in self.old.items():
      setattr(gc, n, f)


class Patched:

  def __init__(self, world):
    self.world = world

  def __enter__(self):
    self.old = (utils.log_model_info, clu.metric_writers.create_default_writer,
                utils._create_sharded_array)
    utils.log_model_info = lambda *a, **k: None

    def writer(logdir=None, *, collection=None, **kw):
      w = Writer(self.world, core.current().host, collection)
      self.world.writers.append(w)
      return w

    clu.metric_writers.create_default_writer = writer
    real = self.old[2]

    def shard(partitioner, shapes, host_arrays):
      t = core.current()
      if t is not None and t.host.group is not None and t.host.group.n > 1:
        return host_arrays  # gathered in the simulated step
      return with_nopreempt(t, lambda: real(partitioner, shapes, host_arrays))

    utils._create_sharded_array = shard
    self.world.gc = Gc(self.world)
    self.world.gc.install()

  def __exit__(self, *a):
    self.world.gc.remove()
    (utils.log_model_info, clu.metric_writers.create_default_writer,
     utils._create_sharded_array) = self.old


# ------------------------------------------------------------------ the world


class Action(trainer_lib.BaseAction):
  """Asks to stop at a given step; remembers when it ran."""

  def __init__(self, world, mode, stops):
    self.world, self.mode, self.stops = world, mode, stops

  def run(self, train_state, metrics_by_task):
    step = int(np.asarray(train_state.step))
    stop = step in self.stops
    self.world.acted(self.mode, step, stop, metrics_by_task)
    return stop


def evaluator_cls(world):

  class Evaluator:
    eval_tasks = ['task']
    model_feature_shapes = {'x': (FEATURES,)}

    def __init__(self, **kw):
      self.pool = concurrent.futures.ThreadPoolExecutor(max_workers=1)
      key = ('infer', world.cfg['hosts'])
      if key not in _DATASETS:
        _DATASETS[key] = with_nopreempt(
            core.current(), lambda: tf.data.Dataset.from_tensor_slices(
                {'x': np.arange(6, dtype=np.float32).reshape(3, 2)}
            ).with_options(quiet_options()).enumerate())
      self.ds = _DATASETS[key]

    def close(self):
      self.pool.shutdown(wait=True)

    def evaluate(self, *, compute_metrics, step, predict_fn, score_fn,
                 predict_with_aux_fn):
      out = predict_fn(self.ds)
      host = core.current().host

      def metrics():
        world.s.yield_point('infer-metrics')
        world.inferred(host, step, out)
        return {'task': {'v': 1.0}}

      if not compute_metrics:
        f = concurrent.futures.Future()
        f.set_result(None)
        return f, out
      return self.pool.submit(metrics), out

  return Evaluator


def listed(path):
  if not os.path.isdir(path):
    return []
  return with_nopreempt(core.current(), lambda: checkpoints.all_steps(path))


class World:
  """Runs jobs of the training loop; subclasses hold the oracles."""

  reference = None

  def __init__(self, run, cfg, s, root):
    if cfg['orbax']:  # with one host only: arrays are not shared across hosts
      cfg['hosts'] = cfg['replicas'] = 1
      run and run.note(hosts=1, replicas=1)
    self.run, self.ch, self.cfg, self.s = run, run.ch if run else None, cfg, s
    c.use_prefix(cfg['prefix'])
    self.dir = os.path.join(root, cfg['dirname'])
    self.writers = []
    self.step_time = 0.1
    self.data_delay = 0
    self.preempt_at = None
    self.preempted = set()
    self.jobs = 0

  # hooks
  def fed(self, host, state, batch, training):
    pass

  def stepped(self, host, state):
    pass

  def initialised(self, host, state):
    pass

  def written(self, writer, step, scalars):
    pass

  def write_fault(self, writer):
    pass

  def overlapped(self, writer):
    pass

  def returned(self, host, result):
    pass

  def collected(self, host):
    pass

  def acted(self, mode, step, stop, metrics):
    pass

  def inferred(self, host, step, out):
    pass

  # one host
  def get_dataset(self, cfg, shard, shards, converter):
    if self.cfg['data'] == 'tf':
      return tf_dataset(self.cfg, shard, shards)
    return CountIterator(self, shard, shards)

  def get_eval_dataset(self, cfg, shard, shards, steps, converter):
    return {n: tf_dataset(self.cfg, shard, shards, k, 100 + 10 * i)
            for i, (n, k) in enumerate(self.cfg['eval_sets'])}

  def ckpt_cfg(self):
    cfg = self.cfg
    save = utils.SaveCheckpointConfig(
        period=cfg['period'], checkpoint_steps=cfg['ckpt_steps'],
        keep=cfg['keep'], dtype=cfg['save_dtype'], save_dataset=cfg['save_ds'],
        keep_dataset_checkpoints=cfg['keep_ds'])
    return utils.CheckpointConfig(save=save if cfg['save'] else None,
                                  restore=self.restore_cfg())

  def restore_cfg(self):
    return None

  def main(self, host, kw):
    cfg = self.cfg
    n = cfg['hosts']
    rep = cfg['replicas']
    part = TrainPartitioner(
        c.fake_mesh(n // rep, rep, n // rep, rep, host.index), None)
    part.world = self
    ds = utils.DatasetConfig(
        mixture_or_task_name='sim', task_feature_lengths={}, split='train',
        batch_size=BATCH, shuffle=False, seed=None)
    args = dict(
        model=Model(cfg['mutables']), train_dataset_cfg=ds,
        train_eval_dataset_cfg=ds if cfg['eval_sets'] else None,
        infer_eval_dataset_cfg=ds if cfg['infer_eval'] else None,
        checkpoint_cfg=self.ckpt_cfg(), partitioner=part,
        trainer_cls=functools.partial(
            self.trainer_base(), learning_rate_fn=lambda s: 0.05 + 0.001 * s,
            num_microbatches=cfg['microbatches']),
        model_dir=self.dir, total_steps=cfg['total'],
        eval_steps=2, eval_period=cfg['eval_period'],
        stats_period=cfg['stats_period'], random_seed=cfg['seed'],
        summarize_config_fn=lambda *a, **k: None,
        inference_evaluator_cls=evaluator_cls(self),
        get_dataset_fn=self.get_dataset,
        concurrent_metrics=cfg['concurrent'],
        train_eval_get_dataset_fn=self.get_eval_dataset,
        run_eval_before_training=cfg['eval_first'],
        use_orbax=cfg['orbax'], verify_matching_vocabs_fn=None)
    args.update(kw)
    result = train_lib.train(**args)
    self.returned(host, result)
    return result

  def trainer_base(self):
    return trainer_lib.Trainer

  # one job
  def job(self, kill=None, **kw):
    """Runs one incarnation. Returns (results, failed tasks, died)."""
    s, cfg = self.s, self.cfg
    name = f'j{self.jobs}'
    self.jobs += 1
    g = simhosts.Group(s, cfg['hosts'], name)
    hosts = [s.add_host(i, f'{name}h{i}', group=g)
             for i in range(cfg['hosts'])]
    for h in hosts:
      h.skew = self.skew(h)
    self.hosts = hosts
    tasks = [s.spawn(h, lambda h=h: self.main(h, kw), 'main') for h in hosts]
    for t in tasks:
      t.expected = True
    t0 = s.now
    while not all(t.done for t in tasks):
      if kill is not None and s.now - t0 >= kill[1]:
        if hosts[kill[0]].alive:
          s.fault('kill', hosts[kill[0]].name)
          s.crash_host(hosts[kill[0]], 'killed')
        kill = None
      if any(not h.alive for h in hosts) or any(
          t.done and t.exc is not None for t in tasks):
        # the others may still finish what they are doing
        if self.patient(tasks):
          s.sleep(30)
        else:
          s.sleep(self.ch.draw(20, 'detect') / 10 if self.ch else 1)
        break
      s.sleep(0.05)
    died = any(not h.alive for h in hosts)
    bad = [t for t in tasks if t.done and t.exc is not None
           and not isinstance(t.exc, (core.SimKilled, core.SimStop))]
    results = [t.result for t in tasks if t.done and t.exc is None]
    self.left = [t for t in s.tasks if t.host in hosts and not t.done]
    for h in hosts:  # the processes end, threads included
      s.crash_host(h, 'ended')
    for t in tasks:
      s.join(t)
    return results, bad, died

  def skew(self, host):
    return 0.0

  def patient(self, tasks):
    return False


def raw_read(path):
  """{leaf: value} of a checkpoint directory of either format."""
  state = os.path.join(path, 'state')
  if not os.path.isdir(state):
    return c.flat_np(checkpoints.load_t5x_checkpoint(path))
  with open(os.path.join(state, '_METADATA')) as f:
    tree = json.load(f)['tree_metadata']
  out = {}
  for entry in tree.values():
    keys = [k['key'] for k in entry['key_metadata']]
    if entry['value_metadata']['value_type'] in ('None', 'Dict'):
      continue
    out['/'.join(keys)] = ts.open({
        'driver': 'zarr', 'kvstore': {
            'driver': 'ocdbt', 'base': 'file://' + state,
            'path': '.'.join(keys) + '/'}}, open=True).result().read().result()
  return out


# -------------------------------------------------------------- the reference

_REF = {}
NOISE = {}
REF_KEYS = ('seed', 'mutables', 'microbatches', 'nan_at')


class Capture(World):

  def __init__(self, *a):
    super().__init__(*a)
    self.states = {}
    self.losses = {}
    self.noise = {}
    self.step_time = 0

  def keep(self, state):
    got = c.flat_np(state.state_dict())
    self.states[int(got['state/step'])] = got

  def stepped(self, host, state):
    with_nopreempt(core.current(), lambda: self.keep(state))

  initialised = stepped

  def written(self, writer, step, scalars):
    if writer.name == 'train' and 'loss' in scalars:
      self.losses[step] = scalars['loss']
      self.noise[step] = scalars['noise'], scalars['noise2']
    elif 'loss' in scalars:
      self.losses[writer.name, step] = scalars['loss']


def ref_key(cfg):
  return tuple(cfg[k] for k in REF_KEYS) + (cfg['data'] == 'const',)


def reference(run, cfg):
  """States and losses of every step of an undisturbed run in one piece."""
  key = ref_key(cfg)
  if key in _REF:
    return _REF[key]
  import shutil
  ch = core.Choices(prefix=[])
  s = core.Sim(ch, os.path.join(run.root, 'ref'))
  os.makedirs(s.scratch)
  s.fs = FaultPlan(ch)
  rc = dict(BASE, **{k: cfg[k] for k in REF_KEYS})
  rc.update(data='const' if cfg['data'] == 'const' else 'count', total=SPAN,
            stats_period=1, eval_sets=EVAL_SETS, eval_period=1,
            eval_first=True)
  w = Capture(None, rc, s, s.scratch)
  t = s.spawn(s.add_host(99, 'ctl'), lambda: w.job(), 'ref')
  t.expected = True
  try:
    with Patched(w):
      s.run()
    if s.violation is not None:
      raise s.violation
    if t.exc is not None:
      raise t.exc
    results, bad, _ = t.result
    if bad:
      run.unexpected(bad[0].exc, bad[0].tb, 'undisturbed run')
    if s.deadlock or not results:
      raise core.Violation('reference', 'an undisturbed run did not finish: '
                           f'{s.deadlock}')
  finally:
    shutil.rmtree(s.scratch, ignore_errors=True)
    c.use_prefix(cfg['prefix'])
  _REF[key] = w.states, w.losses
  NOISE[key] = w.noise
  return _REF[key]


EVAL_SETS = (('ev', 2), ('long', 3))
BASE = {
    'hosts': 1, 'replicas': 1, 'seed': 0, 'mutables': False,
    'microbatches': None, 'data': 'count', 'nan_at': None, 'ts': False,
    'save': False, 'relative': None, 'period': None, 'ckpt_steps': None, 'keep': None,
    'save_ds': False, 'keep_ds': None, 'total': 6, 'eval_period': 0,
    'stats_period': None, 'eval_sets': (), 'infer_eval': False,
    'concurrent': True, 'eval_first': False, 'orbax': False,
    'prefix': 'checkpoint', 'dirname': 'model', 'save_dtype': 'float32',
}


def draw_base(ch):
  cfg = dict(BASE)
  cfg['seed'] = ch.draw(2, 'seed')
  cfg['mutables'] = ch.chance(200)
  cfg['microbatches'] = ch.pick([None, None, 2], 'microbatches')
  cfg['hosts'] = ch.pick([1, 1, 2], 'hosts')
  if cfg['hosts'] == 2 and ch.chance(250):
    cfg['replicas'] = 2
  cfg['ts'] = ch.chance(300)
  cfg['total'] = 3 + ch.draw(8, 'total')
  cfg['orbax'] = ch.chance(250)
  cfg.update(c.draw_place(ch))
  return cfg


REAL = [
    't5x.train.train, t5x.trainer.Trainer and its metric threads',
    't5x.utils dataset iterators, restore configuration, legacy checkpoint '
    'manager, train state initializer', 't5x.checkpoints (real files)',
    't5x.optimizers, t5x.train_state, t5x.metrics',
    'jax tracing and compiled steps with donation; optax',
    'clu peekable iterator and thread pools; tf.data with checkpoints',
]
STUBS = [
    'model: two small parameters, random noise, optional mutable state',
    'multi-host steps: the hosts\' batches are gathered by the simulator and '
    'every host computes the global step on one device',
    'seqio evaluator and feature converter; metric writers that record',
    'compiled programs are shared between runs, keyed by the traced program',
    'multihost collectives, file calls, clocks, threads: simulated',
]
