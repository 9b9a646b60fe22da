PROPERTY = 'C10'
NEEDS = 'a directory with checkpoints of the older format below newer ones, and a restore of one of the older'
BREAKS = 'The format of the checkpoint to restore is judged by the newest checkpoint of its directory.'
EDITS = [('t5x/checkpoints.py', """      ckpt_path = find_checkpoint(directory, step)
    except ValueError:""", """      ckpt_path = find_checkpoint(directory)
    except ValueError:""")]
DEMO = '''
import demo_lib as d
import os
import numpy as np
from t5x import checkpoints
part = d.make_partitioner((0, 1, True), False)
os.makedirs(d.TMP + '/ck')
old = checkpoints.Checkpointer(d.make_state(1), part, d.TMP + '/ck')
old.save(d.make_state(1))
m = checkpoints.OrbaxCheckpointManagerInterface(d.TMP + '/ck', d.make_state(1), part)
m.save(d.make_state(2))
m.wait_until_finished()
try:
  got = int(m.restore(path=d.TMP + '/ck/checkpoint_1').step)
except Exception as e:
  got = repr(e)[:100]
d.done(got == 1, str(got))
'''
