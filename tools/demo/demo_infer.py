"""Runs the real t5x.infer.infer on one process or on threads for hosts."""
import demo_lib as d
import json, os, types
import numpy as np
import jax, seqio, tensorflow as tf
from t5x import infer, utils, partitioning

utils.log_model_info = lambda *a, **k: None
utils.create_checkpoint_manager_and_restore = lambda *a, **k: (
    types.SimpleNamespace(params={}, flax_mutables={}, step=7), None)


def task(n, name='demo'):
  def ds_fn(split, shuffle_files=False, seed=None):
    ids = np.arange(n, dtype=np.int32)
    return tf.data.Dataset.from_tensor_slices({
        'inputs': np.stack([ids, 3 * ids + 1], 1), 'targets': np.stack([ids + 1, ids + 2], 1),
        'id_pretokenized': ids})
  feat = lambda: seqio.Feature(seqio.PassThroughVocabulary(1000), add_eos=False)
  seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(ds_fn, splits=['infer'], num_input_examples={'infer': n}),
                         preprocessors=[], output_features={'inputs': feat(), 'targets': feat()})
  return name


class Converter:
  def __init__(self, pack=False):
    pass
  def __call__(self, ds, task_feature_lengths):
    return ds.map(lambda x: {'inputs': x['inputs'], 'targets': x['targets']})


def tag(rng):
  return 0 if rng is None else int(np.asarray(rng).ravel()[-1]) % 997


class Model:
  FEATURE_CONVERTER_CLS = Converter
  def get_initial_variables(self, *a, **k):
    return {}
  def predict_batch(self, params, batch, rng=None):
    x = np.asarray(batch['inputs'])
    return np.stack([x[:, 0] + 1, x[:, 1]], 1).astype(np.int32)
  def predict_batch_with_aux(self, params, batch, rng=None):
    x = np.asarray(batch['inputs'])
    return self.predict_batch(params, batch), {'scores': (x[:, 0] * 2.5).astype(np.float32)}
  def score_batch(self, params, batch, rng=None):
    return (np.asarray(batch['inputs'])[:, 0] * 1000 + tag(rng)).astype(np.float64)


class Init:
  def __init__(self, **kw):
    self.global_train_state_shape = None
    self.train_state_axes = types.SimpleNamespace(params=None, flax_mutables=None)


class Part(partitioning.BasePartitioner):
  def __init__(self, shard=0, shards=1, hosts=None):
    super().__init__(num_partitions=1)
    self.l = (shard, shards, hosts)
  @property
  def mesh(self):
    return None
  @property
  def _local_chunker(self):
    return None
  @property
  def data_partition_spec(self):
    return jax.sharding.PartitionSpec('data')
  def get_data_layout(self, batch_size=None, host_index=None):
    return partitioning.DataLayout(batch_size=batch_size, shard_id=self.l[0], num_shards=self.l[1], is_first_host_in_replica_set=True)
  def partition(self, fn, in_axis_resources, out_axis_resources, static_argnums=(), donate_argnums=()):
    hosts = self.l[2]
    def step(params, batch, rng, indices, mutables):
      if hosts is None:
        return fn(params, batch, rng, indices, mutables)
      got = hosts.gather((batch, indices))
      b, i = jax.tree_util.tree_map(lambda *a: np.concatenate([np.asarray(x) for x in a]), *got)
      return fn(params, b, rng, i, mutables)
    return step
  def compile(self, fn, *a):
    return fn


def run(out, name, mode='score', batch=2, period=2, ckpt=True, merge=True, write=infer.write_inferences_to_file, part=None, **kw):
  infer.infer(mode=mode, model=Model(),
              dataset_cfg=utils.DatasetConfig(mixture_or_task_name=name, task_feature_lengths={'inputs': 2, 'targets': 2},
                                              split='infer', batch_size=batch, shuffle=False, seed=0),
              restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path='/nowhere'), partitioner=part or Part(),
              output_dir=out, checkpoint_period=period, merge_chunked_results=merge, checkpoint_ds_iter=ckpt,
              train_state_initializer_cls=Init, write_fn=write, summarize_config_fn=lambda **k: None,
              verify_matching_vocabs_fn=None, **kw)


def rows(out, name, mode='score'):
  with open(f'{out}/{name}-{mode}.jsonl-00000-of-00001') as f:
    return [json.loads(l) for l in f]


def ids(out, name, mode='score'):
  return [r['inputs']['id_pretokenized'] for r in rows(out, name, mode)]
