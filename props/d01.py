from props import common as c
from props import world_train as wt
from props import world_input

QUICK = 150
THOROUGH = 10000
NONTRIVIAL = ['resumed-input', 'fresh-input']
RULE = ('A case is a training job of 1, 2 or 4 hosts with clocks apart, fed '
        'from a task or a mixture, crashed or killed up to twice and started '
        'again; non-trivial when a step was fed.')
REAL = wt.REAL + ['t5x.utils.get_dataset and get_training_eval_datasets on '
                  'seqio tasks, mixtures and tf.data pipelines']
STUBS = wt.STUBS
ASSUMES = c.ASSUMES_FS[:2]


def world(run):
  world_input.world(run)
