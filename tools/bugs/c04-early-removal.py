PROPERTY = 'C04'
NEEDS = 'a retention limit, and a crash or write error after old checkpoints were removed and before the new one is visible'
BREAKS = 'Makes room before the new checkpoint is complete: with keep=1 a crash loses the only checkpoint.'
EDITS = [('t5x/checkpoints.py', """    existing_steps = self.all_steps()
    to_remove = len(existing_steps) - self.keep
    if to_remove <= 0:
      return

    for step in existing_steps[:to_remove]:
      checkpoint_utils.remove_checkpoint_dir(self._get_checkpoint_dir(step))
""", """    existing_steps = self.all_steps()
    # Makes room for the checkpoint that is about to be added.
    to_remove = len(existing_steps) + 1 - self.keep
    if to_remove <= 0:
      return

    for step in existing_steps[:to_remove]:
      checkpoint_utils.remove_checkpoint_dir(self._get_checkpoint_dir(step))
"""), ('t5x/checkpoints.py', """      # Write msgpack file in host 0 only
      msgpack_bytes""", """      # Remove old checkpoints first, if necessary, to bound the space needed.
      self._remove_old_checkpoints()

      # Write msgpack file in host 0 only
      msgpack_bytes"""), ('t5x/checkpoints.py', """      # Remove old checkpoints, if necessary.
      self._remove_old_checkpoints()
      self._remove_old_dataset_checkpoints()

    # Block""", """      self._remove_old_dataset_checkpoints()

    # Block""")]
DEMO = '''
import demo_lib as d
from t5x import checkpoints
st = d.make_state(1)
dirn = d.TMP + '/ck'
ck = checkpoints.Checkpointer(st, d.make_partitioner(), dirn, keep=1)
ck.save(st)
real = checkpoints.gfile
class G:
  def __getattr__(self, n):
    return getattr(real, n)
  def rename(self, *a, **k):
    raise OSError('no space')
checkpoints.gfile = G()
try:
  ck.save(d.make_state(2))
except OSError:
  pass
checkpoints.gfile = real
steps = list(checkpoints.Checkpointer(st, d.make_partitioner(), dirn).all_steps())
d.done(1 in steps, f'after a failed save: {steps}')
'''
