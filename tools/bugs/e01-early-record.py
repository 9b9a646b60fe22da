PROPERTY = 'E01'
NEEDS = 'a crash between the end of the predictions of a checkpoint and the end of its metrics, which are computed in the background, and a restart'
BREAKS = 'The metrics of a checkpoint are waited for only after it was recorded as evaluated, so after a crash it is skipped though its metrics were never finished.'
EDITS = [
    ('t5x/eval.py',
     '    all_metrics.result()  # Ensure metrics are finished being computed.\n    # Wait',
     '    # Wait'),
    ('t5x/eval.py',
     "  logging.info('Finished.')\n\n",
     "    all_metrics.result()  # Ensure metrics are finished being computed.\n\n  logging.info('Finished.')\n\n"),
]
DEMO = '''
import demo_lib as d, demo_infer as i, os, types, concurrent.futures, time
import numpy as np
from t5x import checkpoints, eval as ev, utils, train_state as ts
ck = d.TMP + '/m'
for s in (1, 2, 3):
  checkpoints.Checkpointer(d.make_state(s), d.make_partitioner(partitioned=False), ck, keep=None).save(d.make_state(s))
utils.create_checkpoint_manager_and_restore = lambda a, b, c, path, *x, **k: (
    types.SimpleNamespace(params={}, flax_mutables={}, step=int(path.split('_')[-1])), None)
measured, state = [], {'die': True}
class Die(BaseException):
  pass
class Ev:
  eval_tasks, model_feature_shapes = ['t'], {'inputs': (2,)}
  def __init__(self, **k):
    pass
  def close(self):
    pass
  def evaluate(self, *, step, **k):
    def metrics():
      if step == 2 and state['die']:
        raise Die('the process dies while the metrics are computed')
      measured.append(step)
      return {}
    class F:
      def result(self, *a):
        return metrics()
    return F(), None
def run():
  ev.evaluate(model=i.Model(), dataset_cfg=utils.DatasetConfig(mixture_or_task_name='t', task_feature_lengths={}, split='x', batch_size=1, shuffle=False, seed=0),
              restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=ck, mode='all'), partitioner=i.Part(), output_dir=d.TMP,
              inference_evaluator_cls=Ev, summarize_config_fn=lambda **k: None, train_state_initializer_cls=i.Init, use_orbax=False)
try:
  run()
except Die:
  pass
state['die'] = False
run()
d.done(sorted(set(measured)) == [1, 2, 3], measured)
'''
