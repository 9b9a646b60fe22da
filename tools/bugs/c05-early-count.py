PROPERTY = 'C05'
NEEDS = 'checkpoints without metrics that are kept, and more with metrics than the limit minus those without'
BREAKS = 'The number of checkpoints to remove is computed before those without metrics are set aside, so checkpoints among the best are removed.'
EDITS = [('t5x/checkpoints.py', """    existing_steps = existing_steps[:-1]

    if self._keep""", """    existing_steps = existing_steps[:-1]
    to_remove = len(existing_steps) - self.keep

    if self._keep"""), ('t5x/checkpoints.py', """    to_remove = len(existing_steps) - self.keep
    if to_remove <= 0:
      return

    # For any""", """    if not existing_steps:
      return

    # For any""")]
DEMO = '''
import demo_lib as d
from t5x import checkpoints
import tensorflow as tf
dirn = d.TMP + '/ck'
ck = checkpoints.SaveBestCheckpointer(
    d.make_state(1), d.make_partitioner(), dirn, keep=2,
    metric_name_to_monitor='train/accuracy')
w = tf.summary.create_file_writer(dirn + '/train')
for step, v in [(1, 1.), (2, None), (3, 3.), (4, None), (5, 2.), (6, 5.)]:
  if v is not None:
    with w.as_default():
      tf.summary.scalar('accuracy', v, step=step)
  w.flush()
  ck.save(d.make_state(step))
steps = list(ck.all_steps())
d.done(steps == [2, 3, 4, 5, 6], f'kept {steps}')
'''
