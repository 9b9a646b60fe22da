PROPERTY = 'C01'
NEEDS = 'a crash between the directory rename and the end of the write of the msgpack index file'
BREAKS = 'The index file is written after the directory has its final name, so a crash leaves a listed checkpoint with a truncated index.'
EDITS = [('t5x/checkpoints.py', """      with gfile.GFile(os.path.join(tmp_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)

      # Finalize checkpoint directory.
      if final_dir.startswith('gs://'):
""", """      index_dir = tmp_dir
      # Finalize checkpoint directory.
      if final_dir.startswith('gs://'):
"""), ('t5x/checkpoints.py', """      else:
        gfile.rename(tmp_dir, final_dir)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)
""", """      else:
        gfile.rename(tmp_dir, final_dir)
        index_dir = final_dir
      with gfile.GFile(os.path.join(index_dir, 'checkpoint'), 'wb') as fp:
        fp.write(msgpack_bytes)
      logging.info('Saved checkpoint for step %d to %s', step, final_dir)
""")]
DEMO = '''
import demo_lib as d
from t5x import checkpoints
from tensorflow.io import gfile
import os
st = d.make_state(3)
ck = checkpoints.Checkpointer(st, d.make_partitioner(), d.TMP + '/ck')

class Crash(BaseException):
  pass

class Torn(gfile.GFile):
  def write(self, data):
    if self.name.endswith('/checkpoint'):
      super().write(data[:len(data) // 2])
      self.close()
      raise Crash()
    return super().write(data)

real = checkpoints.gfile
class G:
  GFile = Torn
  def __getattr__(self, n):
    return getattr(real, n)
checkpoints.gfile = G()
try:
  ck.save(st)
except Crash:
  pass
checkpoints.gfile = real
new = checkpoints.Checkpointer(st, d.make_partitioner(), d.TMP + '/ck')
steps = list(new.all_steps())
ok = True
for s in steps:
  try:
    ok = ok and d.same(new.restore(step=s), st)
  except Exception as e:
    ok = False
d.done(ok, f'listed {steps}')
'''
