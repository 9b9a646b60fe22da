PROPERTY = 'C11'
NEEDS = 'checkpoints without metrics are not kept, and there is exactly one checkpoint more than the limit'
BREAKS = 'The metrics are only read when there are two checkpoints more than the limit; with one more, the oldest checkpoint is removed even if it is the best.'
EDITS = [('t5x/checkpoints.py', """      if self._track_best:
        metric_name""", """      # Reading the summaries is slow: the latest checkpoint is kept anyway.
      surplus = self._checkpoints.size() - (self._options.max_to_keep or 0)
      if self._track_best and surplus > 1:
        metric_name""")]
DEMO = '''
import demo_lib as d
import functools, os
from t5x import checkpoints, utils
import tensorflow as tf
dirn = d.TMP + '/ck'
os.makedirs(dirn)
save = utils.SaveCheckpointConfig(keep=2, checkpointer_cls=functools.partial(
    checkpoints.SaveBestCheckpointer, metric_name_to_monitor='train/accuracy',
    keep_checkpoints_without_metrics=False))
m = utils.create_orbax_checkpoint_manager(
    save_cfg=save, train_state=d.make_state(1),
    partitioner=d.make_partitioner((0, 1, True), False), model_dir=dirn)
w = tf.summary.create_file_writer(dirn + '/train')
for step, v in [(1, 5.0), (2, 1.0), (3, 2.0)]:
  if v is not None:
    with w.as_default():
      tf.summary.scalar('accuracy', v, step=step)
  w.flush()
  m.save(d.make_state(step))
  m.wait_until_finished()
m.close()
steps = list(checkpoints.all_steps(dirn))
d.done(steps == [1, 3], f'kept {steps}')
'''
