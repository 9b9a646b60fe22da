PROPERTY = 'C08'
NEEDS = 'two hosts, and another job that removes the chosen checkpoint and has saved a newer one after one host has opened it and before the other does'
BREAKS = 'A host that finds the chosen checkpoint removed takes the newest one of the directory instead of failing, while the other hosts use the chosen one.'
EDITS = [('t5x/utils.py', """    restored = []
    for path in paths:
      logging.info(
          'Initializing parameters from specific T5X checkpoint %s', path
      )
      restored.append(
          self._checkpointer.restore(
              path=path,
""", """    restored = []
    for path in paths:
      available = checkpoints.all_steps(os.path.dirname(path))
      if available and not gfile.exists(path):
        # Removed since it was listed: use the one that has replaced it.
        path = checkpoints.get_checkpoint_dir(
            os.path.dirname(path), available[-1]
        )
      logging.info(
          'Initializing parameters from specific T5X checkpoint %s', path
      )
      restored.append(
          self._checkpointer.restore(
              path=path,
""")]
DEMO = '''
import demo_lib as d, os, shutil
from t5x import checkpoints, utils
ck = d.TMP + '/m'
part = d.make_partitioner(partitioned=False)
def save(s):
  checkpoints.Checkpointer(d.make_state(s), part, ck, keep=None).save(d.make_state(s))
save(1)
cfg = utils.RestoreCheckpointConfig(path=ck, mode='latest')
_, paths = utils.get_first_valid_restore_config_and_paths([cfg])
hosts = [utils.LegacyCheckpointManager(save_cfg=None, restore_cfg=cfg, train_state_shape=d.make_state(0),
                                       partitioner=part, model_dir=d.TMP + '/mine') for _ in range(2)]
got = [int(hosts[0].restore(paths, cfg).step)]
save(2)
shutil.rmtree(ck + '/checkpoint_1')  # the job that saves removes old checkpoints
try:
  got.append(int(hosts[1].restore(paths, cfg).step))
except ValueError:
  pass
d.done(len(set(got)) == 1, f'the hosts start from steps {got}')
'''
