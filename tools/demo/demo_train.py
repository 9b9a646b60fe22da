"""Runs the real t5x.train.train on one process with a small model."""
import demo_lib as d
import functools, os
import numpy as np
import jax, jax.numpy as jnp, flax
import clu.metric_writers
import clu.data.dataset_iterator as clu_iter
import seqio, tensorflow as tf
from jax.sharding import PartitionSpec as P
from t5x import checkpoints, metrics as M, models, optimizers, partitioning, train as tl, trainer as tr, utils

utils.log_model_info = lambda *a, **k: None


class Converter(seqio.FeatureConverter if hasattr(seqio, 'FeatureConverter') else object):
  def __init__(self, *a, **k):
    pass


class Model(models.BaseModel):
  FEATURE_CONVERTER_CLS = Converter

  def __init__(self):
    super().__init__(optimizers.adam(0.05))

  def get_initial_variables(self, rng, input_shapes, input_types=None, flax_mutables=None):
    return {'params': {'w': jax.random.normal(rng, (2, 3)), 'b': jnp.zeros((3,))}}

  def loss_fn(self, params, batch, dropout_rng, flax_mutables=None):
    y = batch['x'] @ params['w'] + params['b']
    if dropout_rng is not None:
      y = y + 0.1 * jax.random.normal(dropout_rng, (3,))
    loss = jnp.mean((y - 1.0) ** 2)
    return loss, {'loss': M.AveragePerStep.from_model_output(loss),
                  'rows': M.Sum.from_model_output(jnp.ones((batch['x'].shape[0],))),
                  'steps_per_second': M.StepsPerTime.from_model_output(),
                  'seconds': M.Time()}

  def eval_fn(self, params, batch, flax_mutables=None):
    return self.loss_fn(params, batch, None)

  def predict_batch(self, params, batch, rng=None):
    return batch['x']
  predict_batch_with_aux = score_batch = predict_batch


class Part(partitioning.BasePartitioner):
  def __init__(self):
    super().__init__(num_partitions=1)
  @property
  def mesh(self):
    return jax.sharding.Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('data', 'model'))
  @property
  def _local_chunker(self):
    return partitioning.LocalChunker(self.mesh)
  @property
  def data_partition_spec(self):
    return P('data')
  def get_data_layout(self, batch_size=None, host_index=None):
    return partitioning.DataLayout(batch_size=batch_size, shard_id=0, num_shards=1, is_first_host_in_replica_set=True)
  def get_mesh_axes(self, state):
    flat = flax.traverse_util.flatten_dict(state.state_dict(), keep_empty_nodes=True)
    e = flax.traverse_util.empty_node
    return state.restore_state(flax.traverse_util.unflatten_dict({k: v if v is e else None for k, v in flat.items()}))
  def partition(self, fn, in_axis_resources, out_axis_resources, static_argnums=(), donate_argnums=()):
    return jax.jit(fn)
  def compile(self, fn, *a):
    return fn


def row(pos):
  return np.random.RandomState(pos).rand(4, 2).astype(np.float32)


class It(clu_iter.DatasetIterator):
  """A position-counting input."""
  preempt_at = None
  on_next = None
  def __init__(self):
    self.pos = 0
    self.log = []
  def __next__(self):
    if self.on_next:
      self.on_next(self)
    if self.preempt_at is not None and self.pos == self.preempt_at:
      raise tr.PreemptionError('preempted')
    self.pos += 1
    self.log.append(self.pos - 1)
    return {'x': row(self.pos - 1)}
  def reset(self):
    self.pos = 0
  @property
  def element_spec(self):
    return {'x': clu_iter.ArraySpec(np.float32, (4, 2))}
  def save(self, f):
    with tf.io.gfile.GFile(os.fspath(f), 'w') as h:
      h.write(str(self.pos))
  def restore(self, f):
    with tf.io.gfile.GFile(os.fspath(f), 'r') as h:
      self.pos = int(h.read())


WRITTEN = []  # (writer, step, scalars)


class Writer(clu.metric_writers.MetricWriter):
  slow = None
  def __init__(self, name):
    self.name = name
  def write_scalars(self, step, scalars):
    if Writer.slow:
      Writer.slow(self, step, scalars)
    WRITTEN.append((self.name, int(step), {k: float(np.asarray(v)) for k, v in scalars.items()}))
  def write_summaries(self, *a, **k):
    pass
  write_images = write_videos = write_audios = write_texts = write_summaries
  write_histograms = write_hparams = write_pointcloud = write_summaries
  def flush(self):
    pass
  def close(self):
    pass


clu.metric_writers.create_default_writer = lambda logdir=None, *, collection=None, **k: Writer(collection)


class Act(tr.BaseAction):
  def __init__(self, fn):
    self.fn = fn
  def run(self, state, metrics_by_task):
    return bool(self.fn(int(state.step), metrics_by_task))


def train(model_dir, total, *, it=None, period=None, steps=None, keep=None, save_ds=False, keep_ds=None,
          restore=None, stats=None, eval_period=0, evals=None, trainer=tr.Trainer, save=True, **kw):
  ds = utils.DatasetConfig(mixture_or_task_name='x', task_feature_lengths={}, split='train', batch_size=4, shuffle=False, seed=None)
  cfg = utils.CheckpointConfig(
      save=utils.SaveCheckpointConfig(period=period, checkpoint_steps=steps, keep=keep, save_dataset=save_ds,
                                      keep_dataset_checkpoints=keep_ds) if save else None, restore=restore)
  evals = evals or {}
  args = dict(
      model=Model(), train_dataset_cfg=ds, train_eval_dataset_cfg=ds if evals else None, infer_eval_dataset_cfg=None,
      checkpoint_cfg=cfg, partitioner=Part(),
      trainer_cls=functools.partial(trainer, learning_rate_fn=lambda s: 0.05, num_microbatches=None),
      model_dir=model_dir, total_steps=total, eval_steps=2, eval_period=eval_period, stats_period=stats, random_seed=0,
      summarize_config_fn=lambda *a, **k: None, get_dataset_fn=lambda *a, **k: it or It(),
      train_eval_get_dataset_fn=lambda *a, **k: evals, use_orbax=False, verify_matching_vocabs_fn=None)
  args.update(kw)
  return tl.train(**args)


def load(model_dir, step):
  return checkpoints.load_t5x_checkpoint(model_dir, step=step)


def equal(a, b):
  import numpy as np
  fa, fb = (flax.traverse_util.flatten_dict(x) for x in (a, b))
  return sorted(fa) == sorted(fb) and all(np.array_equal(np.asarray(fa[k]), np.asarray(fb[k])) for k in fa)


def steps(model_dir):
  return checkpoints.all_steps(model_dir)
