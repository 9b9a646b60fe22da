PROPERTY = 'C07'
NEEDS = 'several hosts, one of which is slower at writing its iterator state than host 0 at finishing the checkpoint'
BREAKS = 'Removes the barrier between the writes of the hosts and the rename of the directory, so a checkpoint becomes visible before every host has finished writing.'
EDITS = [('t5x/checkpoints.py', """    # Block until complete on all hosts.
    _sync_global_devices(f'checkpointer:tensorstore_write_complete:{tmp_dir}')

""", """    # All hosts have passed the barrier in `_write_state_to_tensorstore`.
""")]
DEMO = '''
import demo_lib as d
import os, time
H = d.Hosts(2).install()
from t5x import checkpoints
checkpoints._sync_global_devices = H.sync

class It:
  def __init__(self, i):
    self.i = i
  def save(self, f):
    if self.i:
      time.sleep(1)
    open(f, 'w').write('state')

bad = []
def host(i):
  ck = checkpoints.Checkpointer(d.make_state(1), d.make_partitioner((i, 2, True), False), d.TMP + '/ck', dataset_iterator=It(i))
  if i:
    import threading
    def watch():
      for _ in range(300):
        if os.path.exists(d.TMP + '/ck/checkpoint_1'):
          names = os.listdir(d.TMP + '/ck/checkpoint_1')
          if sum(n.startswith('train_ds') for n in names) < 2:
            bad.append(names)
          return
        time.sleep(.01)
    threading.Thread(target=watch, daemon=True).start()
  ck.save(d.make_state(1))

res, err = H.run(host)
time.sleep(.2)
d.done(not bad and not err, f'visible with {bad} {err}')
'''
