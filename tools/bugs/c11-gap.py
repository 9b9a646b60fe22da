PROPERTY = 'C11'
NEEDS = 'a checkpoint without a metric that is older than others with one'
BREAKS = 'The metrics of checkpoints are taken over up to the first checkpoint without one, so those of later checkpoints stay unknown and none of them is removed any more.'
EDITS = [('t5x/checkpoints.py', """        for info in self._checkpoints:
          if info.step in step_to_metric:
""", """        for info in self._checkpoints:
          # Metrics come in the order of the steps.
          if info.step not in step_to_metric:
            break
          if info.step in step_to_metric:
""")]
DEMO = '''
import demo_lib as d
import functools, os
from t5x import checkpoints, utils
import tensorflow as tf
dirn = d.TMP + '/ck'
os.makedirs(dirn)
save = utils.SaveCheckpointConfig(keep=2, checkpointer_cls=functools.partial(
    checkpoints.SaveBestCheckpointer, metric_name_to_monitor='train/accuracy',
    keep_checkpoints_without_metrics=True))
m = utils.create_orbax_checkpoint_manager(
    save_cfg=save, train_state=d.make_state(1),
    partitioner=d.make_partitioner((0, 1, True), False), model_dir=dirn)
w = tf.summary.create_file_writer(dirn + '/train')
for step, v in [(1, None), (2, 5.0), (3, 4.0), (4, 1.0), (5, 2.0)]:
  if v is not None:
    with w.as_default():
      tf.summary.scalar('accuracy', v, step=step)
  w.flush()
  m.save(d.make_state(step))
  m.wait_until_finished()
m.close()
steps = list(checkpoints.all_steps(dirn))
d.done(steps == [1, 2, 3, 5], f'kept {steps}')
'''
