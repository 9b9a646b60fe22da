PROPERTY = 'I02'
NEEDS = 'the write of the last chunk fails after the main thread has checked for failures, that is, on a slow disk'
BREAKS = 'The write pool no longer waits for a write when it is submitted and does not look at the writes that finish during shutdown, so a failed last write goes unnoticed.'
EDITS = [
    ('t5x/infer.py',
     '        exception = future.exception(timeout=0 if wait else None)\n      except concurrent.futures.TimeoutError:\n        still_incomplete_futures.append(future)\n',
     '        exception = future.exception(timeout=0)\n      except concurrent.futures.TimeoutError:\n        still_incomplete_futures.append(future)\n        continue\n'),
]
DEMO = '''
import demo_lib as d, demo_infer as i, os, time
from t5x import infer
n = i.task(11)
out = d.TMP + '/o'
os.makedirs(out)
def slow(path, inferences, *a, **k):
  if path.endswith('chunk00002'):
    time.sleep(1)
    raise OSError('disk full')
  return infer.write_inferences_to_file(path, inferences, *a, **k)
raised = False
try:
  i.run(out, n, write=slow, merge=False)
except OSError:
  raised = True
d.done(raised, 'raised' if raised else 'the failed write was not reported')
'''
