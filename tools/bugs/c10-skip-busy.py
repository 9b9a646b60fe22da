PROPERTY = 'C10'
NEEDS = 'two saves in a row, the second one while the first is still being written in the background'
BREAKS = 'A save that finds the previous one still being written returns without saving, so that checkpoint never appears.'
EDITS = [('t5x/checkpoints.py', """    step = _step_from_train_state(train_state)
    if not force and not self._manager""", """    step = _step_from_train_state(train_state)
    if self._manager.is_saving_in_progress():
      # Training does not have to wait for slow storage.
      return False
    if not force and not self._manager""")]
DEMO = '''
import demo_lib as d
import os, time
from t5x import checkpoints
# The storage is slow: the background write of a save finishes late.
st = d.make_state(1)
part = d.make_partitioner((0, 1, True), False)
os.makedirs(d.TMP + '/ck')
m = checkpoints.OrbaxCheckpointManagerInterface(d.TMP + '/ck', st, part)
slow = checkpoints.OrbaxCheckpointManagerInterface._CheckpointManagerImpl._finalize
def late(self, *a, **k):
  time.sleep(2)
  return slow(self, *a, **k)
checkpoints.OrbaxCheckpointManagerInterface._CheckpointManagerImpl._finalize = late
m.save(d.make_state(1))
m.save(d.make_state(2))
m.close()
names = sorted(os.listdir(d.TMP + '/ck'))
d.done(names == ['checkpoint_1', 'checkpoint_2'], str(names))
'''
