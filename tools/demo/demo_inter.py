"""A small interactive session on the real InteractiveModel."""
import demo_lib as d
import demo_train as dt
import numpy as np
import seqio, tensorflow as tf
from t5x import interactive_model as im, utils


class Converter:
  def __init__(self, pack=False):
    pass
  def __call__(self, ds, task_feature_lengths):
    return ds.map(lambda e: {'x': tf.cast(e['inputs'][:2], tf.float32) / 64})


class Model(dt.Model):
  FEATURE_CONVERTER_CLS = Converter
  input_vocabulary = output_vocabulary = seqio.ByteVocabulary()

  def predict_batch_with_aux(self, params, batch, rng=None):
    return (batch['x'] * 64).astype('int32'), {'scores': self.score_batch(params, batch)}

  def score_batch(self, params, batch, rng=None):
    return batch['x'][:, 0] * 100 + params['w'].sum()


class Part(dt.Part):
  _model_parallel_submesh = None
  _num_partitions = 1


def score_of(params, word):
  return (ord(word[0]) + 3) / 64 * 100 + float(np.asarray(params['w']).sum())


def examples():
  return [{'input': w, 'target': w} for w in ('ab', 'cd', 'ef', 'gh')]


def session(name='session'):
  real = utils.create_learning_rate_scheduler
  utils.create_learning_rate_scheduler = lambda: real(factors='constant', base_learning_rate=0.05)
  try:
    return im.InteractiveModel(
        batch_size=4, task_feature_lengths={'inputs': 6, 'targets': 6},
        output_dir=d.TMP + '/' + name, partitioner=Part(), model=Model(), dtype='float32',
        restore_mode='latest', checkpoint_path='', input_shapes={'x': (4, 2)})
  finally:
    utils.create_learning_rate_scheduler = real
