PROPERTY = 'D01'
NEEDS = 'training evaluation on several shards of a set that is read more than once and whose size is not a multiple of the number of shards'
BREAKS = 'The evaluation examples are divided among the shards where they are read, before they are repeated, so that the shards get out of step and the batches depend on the number of shards.'
EDITS = [('t5x/utils.py', """        .repeat()
        .shard(num_shards, shard_id)
        .batch""", """        .repeat()
        .batch"""), ('t5x/utils.py', """        cfg, mixture_or_task_name=task.name, batch_size=1
    )""", """        cfg, mixture_or_task_name=task.name, batch_size=num_shards
    )"""), ('t5x/utils.py', """            task_cfg,
            shard_id=0,
            num_shards=1,
""", """            task_cfg,
            shard_id=shard_id,
            num_shards=num_shards,
"""), ('t5x/utils.py', """    datasets[mixture_or_task.name] = _repeat_shard_batch_take_cache(
        get_dataset_fn(
            dataclasses.replace(cfg, batch_size=1),
            shard_id=0,
            num_shards=1,
""", """    datasets[mixture_or_task.name] = _repeat_shard_batch_take_cache(
        get_dataset_fn(
            dataclasses.replace(cfg, batch_size=num_shards),
            shard_id=shard_id,
            num_shards=num_shards,
""")]
DEMO = '''
import demo_lib as d
import numpy as np, seqio, tensorflow as tf
from t5x import utils
utils.multihost_utils.broadcast_one_to_all = lambda x, is_source=None: x
utils.multihost_utils.assert_equal = lambda x, m='': None
F = {'x': seqio.Feature(seqio.PassThroughVocabulary(100), add_eos=False, dtype=tf.int32)}
src = seqio.FunctionDataSource(
    lambda split, shuffle_files, seed=None: tf.data.Dataset.from_tensor_slices({'x': np.arange(3, dtype=np.int32)[:, None]}), splits=['train'])
seqio.TaskRegistry.add('demo', source=src, preprocessors=[], output_features=F)
def take(n):
  out = [[] for _ in range(3)]
  for i in range(n):
    ds = utils.get_training_eval_datasets(utils.DatasetConfig(
        mixture_or_task_name='demo', task_feature_lengths={'x': 1}, split='train',
        batch_size=4, shuffle=False, seed=1), i, n, 3, seqio.PassThroughFeatureConverter)['demo']
    for k, b in enumerate(ds.as_numpy_iterator()):
      out[k] += b['x'].ravel().tolist()
  return [sorted(x) for x in out]
d.done(take(1) == take(2), (take(1), take(2)))
'''
