PROPERTY = 'C05'
NEEDS = 'a metric whose event is written before its checkpoint is visible, and a removal in between'
BREAKS = 'Event files are read on from where the last removal stopped, but events of steps without a checkpoint yet are dropped for good, so a best checkpoint is taken for one without a metric.'
EDITS = [('t5x/checkpoints.py', """def populate_metrics_for_steps(
    checkpoints_dir""", """@functools.lru_cache(maxsize=None)
def _events_of(subdir: str):
  \"\"\"The events of a run; every call goes on where the last one stopped.\"\"\"
  return (
      directory_watcher.DirectoryWatcher(
          subdir,
          event_file_loader.EventFileLoader,
          io_wrapper.IsTensorFlowEventsFile,
      ),
      {},
  )


def populate_metrics_for_steps(
    checkpoints_dir"""), ('t5x/checkpoints.py', """    loader = directory_watcher.DirectoryWatcher(
        subdir,
        event_file_loader.EventFileLoader,
        io_wrapper.IsTensorFlowEventsFile,
    )
    for event""", """    loader, known = _events_of(subdir)
    for event"""), ('t5x/checkpoints.py', """      metrics_by_step[event.step] = metric_value

""", """      known[event.step] = metric_value
    metrics_by_step.update(known)

""")]
DEMO = '''
import os
import demo_lib as d
from t5x import checkpoints
import tensorflow as tf
dirn = d.TMP + '/ck'
ck = checkpoints.SaveBestCheckpointer(
    d.make_state(1), d.make_partitioner(), dirn, keep=1,
    metric_name_to_monitor='train/accuracy',
    keep_checkpoints_without_metrics=False)
w = tf.summary.create_file_writer(dirn + '/train')
for step, v in [(1, 1.), (2, 2.), (3, 3.), (4, 4.), (5, None), (6, 5.), (7, 6.)]:
  with w.as_default():
    if v is not None:
      tf.summary.scalar('accuracy', v, step=step)
    if step == 4:
      tf.summary.scalar('accuracy', 9., step=5)
  w.flush()
  ck.save(d.make_state(step))
steps = list(ck.all_steps())
d.done(5 in steps, f'kept {steps}, the best is 5')
'''
