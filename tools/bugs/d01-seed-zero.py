PROPERTY = 'D01'
NEEDS = 'a job configured with the data seed 0 that is started again at another time'
BREAKS = 'The data seed 0 is taken for no seed, so that the order of the input depends on the clock and differs between jobs.'
EDITS = [('t5x/utils.py', """  if seed is None:
    # Use a shared timestamp""", """  if not seed:
    # Use a shared timestamp""")]
DEMO = '''
import demo_lib as d
import numpy as np, seqio, tensorflow as tf
from t5x import utils
utils.multihost_utils.broadcast_one_to_all = lambda x, is_source=None: x
utils.multihost_utils.assert_equal = lambda x, m='': None
seeds = []
def fake(*a, seed=None, **k):
  seeds.append(seed)
seqio.get_dataset = fake
F = {'x': seqio.Feature(seqio.PassThroughVocabulary(100), add_eos=False, dtype=tf.int32)}
src = seqio.FunctionDataSource(
    lambda split, shuffle_files, seed=None: tf.data.Dataset.from_tensor_slices({'x': np.ones((3, 1), np.int32)}), splits=['train'])
task = seqio.Task('demo', src, preprocessors=[], output_features=F)
for s in (0, 4):
  utils.get_dataset(utils.DatasetConfig(
      mixture_or_task_name=task, task_feature_lengths={'x': 1}, split='train',
      batch_size=2, shuffle=True, seed=s), 0, 1, seqio.PassThroughFeatureConverter)
d.done(seeds == [0, 4], seeds)
'''
